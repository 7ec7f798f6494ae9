#include <array>
#include <iomanip>
#include <sstream>
#include <mizugaki/parser/sql_parser.h>
#include <mizugaki/parser/sql_parser_element_kind.h>
#include <mizugaki/parser/sql_parser_options.h>
#include "pbt.h"

namespace {

using namespace mizugaki::parser;
using kind = sql_parser_element_kind;

std::vector<std::pair<kind, std::string>> const& kinds() {
    static std::vector<std::pair<kind, std::string>> const v {
#define K(x) { kind::x, #x }
        K(statement), K(schema_element_definition), K(table_element_definition), K(column_constraint_definition), K(column_reference),
        K(storage_parameter), K(set_clause), K(with_element), K(select_element), K(table_reference), K(grouping_element), K(ordering_element),
        K(field_definition), K(row_expression), K(scalar_expression), K(when_clause), K(string_literal_concatenation), K(privilege_action),
        K(privilege_object), K(privilege_user),
#undef K
    };
    return v;
}

template<class M>
auto& get(M& m, std::size_t i) {
    switch (i) {
#define G(n, x) case n: return m.template get<kind::x>()
        G(0, statement); G(1, schema_element_definition); G(2, table_element_definition); G(3, column_constraint_definition);
        G(4, column_reference); G(5, storage_parameter); G(6, set_clause); G(7, with_element); G(8, select_element); G(9, table_reference);
        G(10, grouping_element); G(11, ordering_element); G(12, field_definition); G(13, row_expression); G(14, scalar_expression);
        G(15, when_clause); G(16, string_literal_concatenation); G(17, privilege_action); G(18, privilege_object);
        default: return m.template get<kind::privilege_user>();
#undef G
    }
}

template<class V, class F>
void map_history(pbt::source& c, pbt::context& ctx, F&& value) {
    using map_type = sql_parser_element_map<V>;
    std::array<map_type, 2> maps {};
    std::array<std::array<V, 20>, 2> model {};
    int n = c.range(1, 25);
    std::string hist;
    for (int s = 0; s < n; ++s) {
        auto w = c.draw(2);
        auto i = c.draw(20);
        auto& [k, name] = kinds()[i];
        switch (c.weighted({ 3, 3, 2, 1, 1, 1 })) {
            case 0: { V v = value(); maps[w][k] = v; model[w][i] = v; hist += name + "=; "; break; }
            case 1: { V v = value(); get(maps[w], i) = v; model[w][i] = v; hist += "get " + name + "=; "; break; }
            case 2: { V v = value(); V& r = maps[w][k]; r = v; model[w][i] = v; hist += "ref " + name + "; "; break; }
            case 3: maps[w] = maps[1 - w]; model[w] = model[1 - w]; hist += "copy; "; break;
            case 4: { map_type t { maps[w] }; maps[w] = map_type {}; maps[w] = std::move(t); hist += "move; "; break; }
            default: { map_type t {}; maps[w] = t; model[w] = {}; hist += "clear; "; break; }
        }
        for (std::size_t m = 0; m < 2; ++m) {
            map_type const& cm = maps[m];
            for (std::size_t j = 0; j < 20; ++j) {
                auto kj = kinds()[j].first;
                ctx.require(maps[m][kj] == model[m][j] && cm[kj] == model[m][j], "index", hist + "[" + kinds()[j].second + "]");
                ctx.require(get(maps[m], j) == model[m][j] && get(cm, j) == model[m][j], "get", hist + "get<" + kinds()[j].second + ">");
            }
        }
    }
    std::ostringstream a, b;
    a << maps[0];
    b << "{";
    for (std::size_t j = 0; j < 20; ++j) b << (j ? ", " : "") << kinds()[j].second << ":" << model[0][j];
    b << "}";
    ctx.require(a.str() == b.str(), "print", "printed " + a.str() + ", expected " + b.str());
    ctx.show(hist);
    ctx.nontrivial(hist + b.str());
}

void maps(pbt::source& c, pbt::context& ctx) {
    if (c.flip()) {
        map_history<std::size_t>(c, ctx, [&] { return static_cast<std::size_t>(c.bits(48)); });
        ctx.label("map of sizes");
    } else {
        map_history<std::string>(c, ctx, [&] { return std::string(c.draw(30), static_cast<char>('a' + c.draw(26))); });
        ctx.label("map of strings");
    }
}

void find(pbt::source& c, pbt::context& ctx) {
    auto& [k, name] = c.pick(kinds());
    std::string s = name;
    int m = c.range(0, 6);
    switch (m) {
        case 0: break;
        case 1: s.erase(c.draw(static_cast<std::uint32_t>(s.size())), 1); break;
        case 2: s.insert(c.draw(static_cast<std::uint32_t>(s.size() + 1)), 1, c.pick(std::string { "_sea \0A" })); break;
        case 3: s[c.draw(static_cast<std::uint32_t>(s.size()))] ^= static_cast<char>(1U << c.draw(7)); break;
        case 4: s = s.substr(0, c.draw(static_cast<std::uint32_t>(s.size()))); break;
        case 5: s = s.substr(c.draw(static_cast<std::uint32_t>(s.size()))); break;
        default: s += c.pick(kinds()).second; break;
    }
    ctx.show("find '" + s + "'");
    std::optional<kind> expect;
    for (auto& [k2, n2] : kinds()) if (n2 == s) expect = k2;
    // the name is a slice of a larger buffer: what follows must not matter
    std::string buffer = s + "_element";
    auto r = find_sql_parser_element_kind(std::string_view { buffer }.substr(0, s.size()));
    ctx.require(r == expect, "find", r ? "found " + std::string { to_string_view(*r) } : "not found");
    ctx.label(expect ? "exact" : "near-miss");
    ctx.nontrivial(s);
}

// options are independent of each other, and of any other options
void options(pbt::source& c, pbt::context& ctx) {
    struct model {
        std::size_t cand { 5 }, nodes { 0 }, depth { 0 };
        bool desc { true };
        int debug { 0 };
        std::array<std::size_t, 20> lim {};
    };
    sql_parser_options a, b;
    model ma, mb;
    std::string hist;
    int n = c.range(1, 20);
    auto verify = [&](sql_parser_options& o, model const& m, std::string const& what) {
        sql_parser_options const& co = o;
        std::string w = what + " after " + hist;
        ctx.require(o.max_expected_candidates() == m.cand && co.max_expected_candidates() == m.cand, "max_expected_candidates", w);
        ctx.require(o.tree_node_limit() == m.nodes && co.tree_node_limit() == m.nodes, "tree_node_limit", w);
        ctx.require(o.tree_depth_limit() == m.depth && co.tree_depth_limit() == m.depth, "tree_depth_limit", w);
        ctx.require(o.enable_description_comments() == m.desc && co.enable_description_comments() == m.desc, "enable_description_comments", w);
        ctx.require(o.debug() == m.debug && co.debug() == m.debug, "debug", w);
        for (std::size_t j = 0; j < 20; ++j) {
            auto k = kinds()[j].first;
            ctx.require(o.element_limits()[k] == m.lim[j] && co.element_limits()[k] == m.lim[j], "element_limits", kinds()[j].second + ": " + w);
        }
    };
    sql_parser parser;
    bool use_parser = c.flip();
    auto& first = use_parser ? parser.options() : a;
    for (int i = 0; i < n; ++i) {
        bool which = c.flip();
        auto& o = which ? first : b;
        auto& m = which ? ma : mb;
        auto v = static_cast<std::size_t>(c.bits(c.flip() ? 8 : 60));
        hist += which ? "a." : "b.";
        switch (c.range(0, 6)) {
            case 0: o.max_expected_candidates() = v; m.cand = v; hist += "candidates; "; break;
            case 1: o.tree_node_limit() = v; m.nodes = v; hist += "nodes; "; break;
            case 2: o.tree_depth_limit() = v; m.depth = v; hist += "depth; "; break;
            case 3: { bool x = c.flip(); o.enable_description_comments() = x; m.desc = x; hist += "description; "; break; }
            case 4: { int x = c.range(0, 100); o.debug() = x; m.debug = x; hist += "debug; "; break; }
            case 5: { auto j = c.draw(20); o.element_limits()[kinds()[j].first] = v; m.lim[j] = v; hist += "limit of " + kinds()[j].second + "; "; break; }
            default: { sql_parser_options t { std::move(o) }; o = std::move(t); hist += "move; "; break; }
        }
        verify(first, ma, "a");
        verify(b, mb, "b");
    }
    // a parser keeps the options it is given
    sql_parser p { std::move(b) };
    verify(p.options(), mb, "parser");
    ctx.show(hist);
    ctx.label(use_parser ? "of a parser" : "stand alone");
    ctx.nontrivial(hist);
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C11";
    s.rule = "random histories of element maps and of parser options against plain models (all other entries must stay as they were), lookups of exact, mutated and sliced kind names; non-trivial: a distinct history or name";
    s.subs.push_back({ "maps", 20000, 800000, maps });
    s.subs.push_back({ "find", 60000, 2000000, find });
    s.subs.push_back({ "options", 20000, 800000, options });
    return pbt::run(s, argc, argv);
}
