#include "doc_check.h"

using namespace sqlgen;

namespace {

using kind = sql_parser_element_kind;

// the kinds a list step may blame, with their names in diagnostics
std::map<std::string, kind> const& kinds() {
    static std::map<std::string, kind> const m {
        { "statement", kind::statement },
        { "schema_element_definition", kind::schema_element_definition },
        { "table_element_definition", kind::table_element_definition },
        { "column_constraint_definition", kind::column_constraint_definition },
        { "column_reference", kind::column_reference },
        { "storage_parameter", kind::storage_parameter },
        { "set_clause", kind::set_clause },
        { "with_element", kind::with_element },
        { "select_element", kind::select_element },
        { "table_reference", kind::table_reference },
        { "grouping_element", kind::grouping_element },
        { "ordering_element", kind::ordering_element },
        { "field_definition", kind::field_definition },
        { "row_expression", kind::row_expression },
        { "scalar_expression", kind::scalar_expression },
        { "when_clause", kind::when_clause },
        { "string_literal_concatenation", kind::string_literal_concatenation },
        { "privilege_action", kind::privilege_action },
        { "privilege_object", kind::privilege_object },
        { "privilege_user", kind::privilege_user },
    };
    return m;
}

void elements(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.list_max = 6;
    document d { c, conf, c.flip() ? gap_style::plain : gap_style::random };
    for (auto& s : d.g.steps) {
        if (!kinds().count(s.kind)) ctx.fail("harness", "unknown kind " + s.kind);
    }
    // limits around the sizes which appear in the document
    std::map<std::string, std::size_t> limit, largest;
    for (auto& s : d.g.steps) largest[s.kind] = std::max(largest[s.kind], s.size);
    sql_parser parser;
    std::string desc;
    for (auto& [name, k] : kinds()) {
        std::size_t v = 0;
        if (c.chance(1, 2)) {
            auto it = largest.find(name);
            std::size_t m = it == largest.end() ? 1 : it->second;
            switch (c.weighted({ 3, 3, 3, 2, 1 })) {
                case 0: v = m; break;
                case 1: v = m > 1 ? m - 1 : 1; break;
                case 2: v = 1 + c.draw(4); break;
                case 3: v = m + 1; break;
                default: v = 1; break;
            }
        }
        limit[name] = v;
        parser.options().element_limits()[k] = v;
        if (v) desc += name + "<=" + std::to_string(v) + " ";
    }
    ctx.show(d.lay.text + "\n  with " + desc);
    auto r = parser("-", d.lay.text);
    list_step const* first = nullptr;
    for (auto& s : d.g.steps) {
        auto l = limit[s.kind];
        if (l != 0 && s.size > l) {
            first = &s;
            break;
        }
    }
    if (!first) {
        if (!r.has_value()) ctx.fail("rejected", "no list exceeds its limit: " + diag_text(r));
        // limits do not change what is accepted
        sql_parser plain;
        auto u = plain("-", d.lay.text);
        ctx.require(u.has_value(), "rejected", "rejected without limits");
        auto diff = jv_diff(jv_of(*u.value()), jv_of(*r.value()), true, "unit");
        if (!diff.empty()) ctx.fail("tree", diff);
        ctx.label("within-limits");
        bool tight = false;
        for (auto& s : d.g.steps) tight |= limit[s.kind] == s.size;
        if (tight) {
            ctx.label("exactly-at-the-limit");
            ctx.nontrivial(d.lay.text + desc);
        }
        return;
    }
    if (r.has_value()) ctx.fail("accepted", "the list of " + first->kind + " of " + std::to_string(first->size) + " elements exceeds the limit " + std::to_string(limit[first->kind]));
    auto b = d.lay.span[static_cast<std::size_t>(first->loc_b)].first;
    auto e = d.lay.span[static_cast<std::size_t>(first->loc_e) - 1].second;
    auto& diag = r.diagnostic();
    std::string expect = "expected a list of " + first->kind + " blamed at " + std::to_string(b) + "-" + std::to_string(e) + ", but was " + diag_text(r);
    if (diag.code() != sql_parser_code::exceed_number_of_elements) ctx.fail("code", expect);
    if (diag.region().begin != b || diag.region().end != e) ctx.fail("location", expect);
    std::string tail = first->kind + " must be less than or equal to " + std::to_string(limit[first->kind]);
    if (diag.message().find(tail) == std::string::npos) ctx.fail("message", expect);
    ctx.label("exceeds-" + first->kind);
    ctx.nontrivial(d.lay.text + desc);
}

void tree_counts(pbt::source& c, pbt::context& ctx) {
    document d { c };
    ctx.show(d.lay.text);
    std::size_t nodes = 0, depth = 0;
    std::vector<std::size_t> per_depth;
    each_node(d.statements, 0, [&](jv const&, std::size_t dd) { ++nodes; depth = std::max(depth, dd); });
    if (d.statements.a.empty()) {
        return;
    }
    auto around = [&](std::size_t n) -> std::size_t {
        switch (c.weighted({ 3, 3, 2, 2, 2 })) {
            case 0: return 0;
            case 1: return n;
            case 2: return n + 1;
            case 3: return n > 1 ? n - 1 : 1;
            default: return 1 + c.draw(static_cast<std::uint32_t>(n));
        }
    };
    sql_parser parser;
    auto nl = parser.options().tree_node_limit() = around(nodes);
    auto dl = parser.options().tree_depth_limit() = around(depth);
    ctx.show_more("\n  with node limit " + std::to_string(nl) + ", depth limit " + std::to_string(dl));
    auto r = parser("-", d.lay.text);
    bool too_many = nl != 0 && nodes > nl, too_deep = dl != 0 && depth > dl;
    std::string sizes = std::to_string(nodes) + " nodes of depth " + std::to_string(depth);
    if (!too_many && !too_deep) {
        if (!r.has_value()) ctx.fail("rejected", sizes + ": " + diag_text(r));
        if (nl != 0 || dl != 0) {
            ctx.require(r.tree_node_count() == nodes, "node-count", "expected " + sizes + ", but " + std::to_string(r.tree_node_count()) + " were counted");
            ctx.require(r.max_tree_depth() == depth, "depth", "expected " + sizes + ", but depth was " + std::to_string(r.max_tree_depth()));
            if (nl == nodes || dl == depth) ctx.label("exactly-at-the-limit");
        } else {
            ctx.label("unlimited");
        }
    } else {
        if (r.has_value()) ctx.fail("accepted", sizes);
        if (r.diagnostic().code() != sql_parser_code::exceed_number_of_elements) ctx.fail("code", diag_text(r));
        auto rg = r.diagnostic().region();
        // the region is one of a node of the tree, and not shallower than the limit if only the depth is exceeded
        resolve(d.statements, d.lay, false);
        bool found = false;
        each_node(d.statements, 0, [&](jv const& v, std::size_t dd) {
            if (too_deep && !too_many && dd != dl + 1) return;
            found |= v.tb < 0 || (v.tb == static_cast<long>(rg.begin) && v.te == static_cast<long>(rg.end));
        });
        if (!found) ctx.fail("location", sizes + ": " + diag_text(r));
        ctx.label(too_deep && too_many ? "exceeds-both" : too_deep ? "exceeds-depth" : "exceeds-nodes");
    }
    if (d.nontrivial()) ctx.nontrivial(d.lay.text + std::to_string(nl) + "/" + std::to_string(dl));
}

// nested to an exact depth
void towers(pbt::source& c, pbt::context& ctx) {
    int n = c.chance(1, 4) ? c.range(1, 600) : c.range(1, 40);
    std::size_t nodes = 0, depth = 0;
    std::string text;
    // SELECT <expr>: statement, query, element, expression...
    int k = c.range(0, 4);
    std::string pre, post;
    for (int i = 0; i < n; ++i) {
        switch (k) {
            case 0: pre += "NOT "; break;
            case 1: pre += "- "; break;
            case 2: pre += "CASE WHEN "; post = " THEN 0 END" + post; break;
            case 3: pre += "CAST("; post = " AS INT)" + post; break;
            default: pre += "f("; post = ")" + post; break;
        }
    }
    text = "SELECT " + pre + "a" + post;
    sql_parser parser;
    parser.options().tree_node_limit() = 1U << 30U;
    auto r = parser("-", text);
    if (!r.has_value()) ctx.fail("rejected", diag_text(r));
    auto v = jv_of(*r.value());
    each_node(*v.find("statements"), 0, [&](jv const&, std::size_t dd) { ++nodes; depth = std::max(depth, dd); });
    ctx.show("tower " + std::to_string(k) + " of " + std::to_string(n) + ": " + text.substr(0, 100));
    ctx.require(r.tree_node_count() == nodes && r.max_tree_depth() == depth, "counts",
            std::to_string(nodes) + " nodes of depth " + std::to_string(depth) + ", but was " + std::to_string(r.tree_node_count()) + "/" + std::to_string(r.max_tree_depth()));
    ctx.require(depth >= static_cast<std::size_t>(n), "depth", "less than the tower");
    for (int delta = -1; delta <= 1; ++delta) {
        sql_parser p;
        p.options().tree_depth_limit() = depth + static_cast<std::size_t>(delta);
        auto u = p("-", text);
        ctx.require(u.has_value() == (delta >= 0), "limit", "at depth limit " + std::to_string(depth) + (delta < 0 ? "-1" : delta > 0 ? "+1" : ""));
        if (!u.has_value()) ctx.require(u.diagnostic().code() == sql_parser_code::exceed_number_of_elements, "code", diag_text(u));
    }
    ctx.label("tower");
    ctx.nontrivial(std::to_string(k) + "/" + std::to_string(n));
}

// long lists, right at the limit and one over
void long_lists(pbt::source& c, pbt::context& ctx) {
    struct shape { char const* kind; char const* head; char const* item; char const* sep; char const* tail; };
    static std::vector<shape> const shapes {
        { "select_element", "SELECT ", "a", ",", " FROM t" },
        { "table_reference", "SELECT * FROM ", "t", ",", "" },
        { "scalar_expression", "SELECT f(", "1", ",", ")" },
        { "scalar_expression", "VALUES (", "1", ",", ")" },
        { "scalar_expression", "SELECT a FROM t WHERE a IN (", "1", ",", ")" },
        { "scalar_expression", "CREATE INDEX i ON t (a) INCLUDE (", "", "", "" },
        { "row_expression", "INSERT INTO t VALUES ", "(1)", ",", "" },
        { "row_expression", "VALUES ", "(1)", ",", "" },
        { "column_reference", "INSERT INTO t (", "a", ",", ") VALUES (1)" },
        { "set_clause", "UPDATE t SET ", "a=1", ",", "" },
        { "ordering_element", "SELECT a FROM t ORDER BY ", "a", ",", "" },
        { "grouping_element", "SELECT 1 FROM t GROUP BY ", "a", ",", "" },
        { "table_element_definition", "CREATE TABLE t (", "a INT", ",", ")" },
        { "column_constraint_definition", "CREATE TABLE t (a INT", " NOT NULL", "", ")" },
        { "with_element", "WITH ", "a AS (SELECT 1 FROM t)", ",", " SELECT 1 FROM t" },
        { "when_clause", "SELECT CASE", " WHEN a THEN 1", "", " END" },
        { "string_literal_concatenation", "SELECT 'a'", "\n'b'", "", "" },
        { "privilege_action", "GRANT ", "SELECT", ",", " ON t TO u" },
        { "privilege_user", "GRANT SELECT ON t TO ", "u", ",", "" },
        { "statement", "", "SELECT 1", ";", "" },
    };
    auto& s = c.pick(shapes);
    if (!*s.item) throw pbt::discard {};
    int n = c.chance(1, 6) ? c.range(1, 400) : c.range(1, 12);
    std::string text = s.head;
    for (int i = 0; i < n; ++i) {
        if (i) text += s.sep;
        text += s.item;
    }
    text += s.tail;
    int delta = c.range(-1, 1);
    long lim = n + delta;
    if (lim < 1) lim = 1;
    sql_parser p;
    p.options().element_limits()[kinds().at(s.kind)] = static_cast<std::size_t>(lim);
    ctx.show(std::string(s.kind) + " x" + std::to_string(n) + " limit " + std::to_string(lim) + ": " + text.substr(0, 200));
    auto r = p("-", text);
    bool ok = n <= lim;
    if (ok && !r.has_value()) ctx.fail("rejected", diag_text(r));
    if (!ok) {
        ctx.require(!r.has_value(), "accepted", "over the limit");
        ctx.require(r.diagnostic().code() == sql_parser_code::exceed_number_of_elements, "code", diag_text(r));
    }
    ctx.label(std::string(ok ? "within " : "over ") + s.kind);
    ctx.nontrivial(text + std::to_string(lim));
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C06";
    s.rule = "documents of the full grammar with element limits at, below and above the length of each list (20 kinds), with tree limits around the exact node count and depth, expression towers and long lists; the expected first violation comes from the generator; non-trivial: a distinct (text, limits) pair where a limit is reached or exceeded, or a text of 8 tokens or more";
    s.subs.push_back({ "elements", 60000, 5000000, elements });
    s.subs.push_back({ "tree", 40000, 4000000, tree_counts });
    s.subs.push_back({ "towers", 2000, 100000, towers });
    s.subs.push_back({ "long-lists", 8000, 400000, long_lists });
    return pbt::run(s, argc, argv);
}
