// A12: names matter only up to consistent renaming; neither the spelling of keywords and regular identifiers, nor the
// layout, nor the order of declarations in the catalog changes the result of an analysis.
#include "acat.h"
namespace {
using namespace acat;
using sqlgen::tok; using sqlgen::tk; using sqlgen::lower; using sqlgen::upper;

struct renaming {
    std::vector<std::string> names; // distinct, in lower case
    bool active {};
    std::size_t length {}, phase {}; // of the names in the other text
    void style(pbt::source& c) { length = c.weighted({ 3, 2, 2, 1 }); length = length == 0 ? 0 : length == 1 ? c.draw(12) : length == 2 ? 20 + c.draw(60) : 100 + c.draw(400); phase = c.draw(37); }
    std::string image(std::size_t i) const {
        static std::string const letters = "abcdefghijklmnopqrstuvwxyz_0123456789";
        std::string s = "kq" + std::to_string((i * 7 + 3) % 256) + "kq";
        for (std::size_t k = 0; k < length; ++k) s += letters[(k + phase) % letters.size()];
        return s + "kq";
    }
    std::string operator()(std::string const& n) const {
        if (!active) return n;
        auto l = lower(n);
        for (std::size_t i = 0; i < names.size(); ++i) {
            if (names[i] != l) continue;
            if (n == l) return image(i);
            if (n == upper(n)) return upper(image(i));
        }
        return n;
    }
    std::string undo(std::string s) const {
        if (!active) return s;
        for (std::size_t i = 0; i < names.size(); ++i) for (bool up : { false, true }) {
            auto from = up ? upper(image(i)) : image(i), to = up ? upper(names[i]) : names[i];
            for (auto p = s.find(from); p != std::string::npos; p = s.find(from, p + to.size())) s.replace(p, from.size(), to);
        }
        return s;
    }
};
template<class T> std::vector<T> shuffled(pbt::source& c, std::vector<T> v, bool active) {
    if (active) for (std::size_t i = v.size(); i > 1; --i) { auto j = i - 1 - c.draw(static_cast<std::uint32_t>(i)); std::swap(v[i - 1], v[j]); }
    return v;
}
// the same catalog by other names, declared in another order, among things which are not referred
void rebuild(pbt::source& c, setting const& from, setting& to, renaming const& re, bool reorder) {
    auto& fx = to.fx;
    fx.catalog_name = re(from.fx.catalog_name);
    std::vector<std::string> sn; for (auto& s : from.fx.schemas) sn.push_back(s->name);
    auto order = shuffled(c, sn, reorder);
    if (reorder && c.flip()) { fx.add_schema("unrelated"); fx.add_table({ "unrelated", "unrelated", { { "unrelated", ty::num } }, {} }); fx.add_function({ "unrelated", "unrelated", { ty::num }, ty::num, {} }); }
    for (auto& n : order) fx.add_schema(re(n));
    fx.path.clear();
    for (auto p : from.fx.path) for (std::size_t i = 0; i < fx.schemas.size(); ++i) if (fx.schemas[i]->name == re(sn[p])) fx.path.push_back(i);
    std::vector<mtable const*> ts; for (auto& t : from.fx.tables) ts.push_back(t.get());
    for (auto* t : shuffled(c, ts, reorder)) {
        mtable n; n.schema = re(t->schema); n.name = re(t->name); n.pk = t->pk; n.has_index = t->has_index;
        for (auto& k : t->cols) n.cols.push_back({ re(k.name), k.type, k.hidden, k.synthesized, k.read_only });
        fx.add_table(std::move(n));
    }
    if (reorder && c.flip()) { auto s = fx.schemas.back()->name; fx.add_table({ s, "unrelated", { { "unrelated", ty::num } }, { 0 } }); fx.add_variable(s, "unrelated2", ty::num, {}); }
    for (auto f : shuffled(c, from.fx.functions, reorder)) {
        f.schema = re(f.schema); f.name = re(f.name);
        for (auto& k : f.table) k.first = re(k.first);
        fx.add_function(std::move(f));
    }
    for (auto& a : shuffled(c, from.fx.aggregates, reorder)) fx.add_aggregate(re(a.schema), a.name, a.params, a.ret);
    for (auto& v : shuffled(c, from.fx.variables, reorder)) fx.add_variable(re(v.schema), re(v.name), v.type, v.value);
    auto param = [&](std::string const& n) { return n[0] == ':' ? ":" + re(n.substr(1)) : re(n); };
    for (auto& h : shuffled(c, from.hosts, reorder)) to.add_host(param(h.first), h.second);
    for (auto& h : shuffled(c, from.held, reorder)) to.hold(param(h.first), h.second);
}
std::string unquoted(std::string const& t) { std::string v; for (std::size_t i = 1; i + 1 < t.size(); ++i) { v += t[i]; if (t[i] == '"') ++i; } return v; }
std::string delimited(std::string const& v) { std::string r = "\""; for (char x : v) { r += x; if (x == '"') r += x; } return r + "\""; }
std::vector<tok> respelled(pbt::source& c, std::vector<tok> toks, renaming const& re, bool fold, bool respell) {
    for (auto& t : toks) {
        if (t.text[0] == '"') {
            auto v = re(unquoted(t.text));
            t.text = delimited(v);
        } else if (t.text[0] == ':' && t.text.size() > 1) {
            t.text = ":" + re(t.text.substr(1));
        } else if (t.kind == tk::ident) {
            auto v = re(fold ? lower(t.text) : t.text);
            if (!respell) { if (v != (fold ? lower(t.text) : t.text)) t.text = fold && t.text == upper(t.text) ? upper(v) : v; continue; }
            switch (c.weighted({ 4, 2, 2, 2 })) {
                case 0: t.text = v; break;
                case 1: t.text = delimited(v); break;
                default: if (fold) for (auto& x : v) if (c.flip()) x = static_cast<char>(std::toupper(static_cast<unsigned char>(x))); t.text = v; break;
            }
        }
    }
    return toks;
}
void check(pbt::source& c, pbt::context& ctx, setting& a, std::vector<tok> const& toks, renaming& re) {
    auto rename = !c.chance(1, 4), respell = !c.chance(1, 4), reorder = !c.chance(1, 4), relayout = c.flip();
    // the names of users keep their spelling
    for (auto& t : toks) if (t.text == "GRANT" || t.text == "REVOKE") respell = false;
    auto oa = a.fx.options();
    options(c, oa);
    bool fold = oa.lowercase_regular_identifiers();
    re.active = false;
    re.style(c);
    auto la = sqlgen::layouter { c, sqlgen::gap_style::plain, false }(toks);
    re.active = rename;
    setting b;
    rebuild(c, a, b, re, reorder);
    auto lb = sqlgen::layouter { c, relayout ? sqlgen::gap_style::random : sqlgen::gap_style::plain, relayout }(respelled(c, toks, re, fold, respell));
    ctx.show("-- lowercase_regular_identifiers: " + std::string { fold ? "true\n" : "false\n" } + la.text + "\n-- respelled:\n" + lb.text);
    auto ob = oa;
    // the same options over the other catalog
    auto fresh = b.fx.options();
    ob = mana::sql_analyzer_options { b.fx.catalog, b.fx.search_path, b.fx.schemas[b.fx.path[0]]->decl };
    ob.lowercase_regular_identifiers() = fold;
    ob.allow_context_independent_null() = oa.allow_context_independent_null();
    ob.validate_scalar_expressions() = oa.validate_scalar_expressions();
    ob.prefer_small_integer_literals() = oa.prefer_small_integer_literals();
    ob.prefer_small_character_literals() = oa.prefer_small_character_literals();
    ob.prefer_small_decimal_literals() = oa.prefer_small_decimal_literals();
    ob.cast_literals_in_context() = oa.cast_literals_in_context();
    ob.prefer_write_statement() = oa.prefer_write_statement();
    ob.host_parameter_declaration_starts_with_colon() = oa.host_parameter_declaration_starts_with_colon();
    ob.max_decimal_precision() = oa.max_decimal_precision();
    ob.default_decimal_precision() = oa.default_decimal_precision();
    ob.system_zone_offset() = oa.system_zone_offset();
    bool pa {}, pb {};
    auto ra = outcomes(a, oa, la, respell || rename || relayout, pa);
    auto rb = outcomes(b, ob, lb, respell || rename || relayout, pb);
    for (auto& r : rb) r = re.undo(r);
    ctx.require(pa == pb && ra.size() == rb.size(), "the respelled statement is parsed in another way", [&] { return (ra.empty() ? "" : ra[0]) + "\n" + (rb.empty() ? "" : rb[0]); });
    for (std::size_t i = 0; i < ra.size(); ++i) ctx.require(ra[i] == rb[i], "the result differs", [&] { return ra[i] + "\n-- but:\n" + rb[i]; });
    if (!pa) { ctx.label("rejected by the parser"); return; }
    bool good = false;
    for (auto& r : ra) { auto w = r.substr(0, r.find_first_of(" \n")); ctx.label(w.empty() ? "plan" : w); good = good || w != "unsupported_feature"; }
    if (good && lb.text != la.text) ctx.nontrivial(la.text);
    ctx.label("renamed", rename); ctx.label("names over 64 letters", rename && re.length > 60); ctx.label("respelled", respell); ctx.label("other catalog order", reorder); ctx.label("other layout", relayout);
}
void distinct(std::vector<std::string>& v) { for (auto& n : v) n = lower(n); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
void grammar(pbt::source& c, pbt::context& ctx) {
    setting s; catalog(c, s);
    sqlgen::config conf;
    conf.names = names();
    // these are set functions
    conf.names.erase(std::remove(conf.names.begin(), conf.names.end(), "count"), conf.names.end());
    conf.delimited = c.chance(1, 6); conf.contextual = false; conf.exotic = c.chance(1, 4);
    conf.depth = c.range(1, 4); conf.max_statements = 2;
    sqlgen::gen g { c, conf };
    g.document();
    renaming re; re.names = conf.names;
    distinct(re.names);
    check(c, ctx, s, g.toks, re);
}
void queries(pbt::source& c, pbt::context& ctx) {
    setting s; qg::gen_options go;
    go.allow_null = c.flip();
    qg::generator gen { c, s.fx, go };
    gen.budget = 25;
    gen.catalog();
    auto x = gen.query(nullptr, nullptr, c.range(1, 2), true);
    renaming re;
    re.names = { "a", "b", "c1", "d", "k1", "v1", "x", "y", "t0", "t1", "u0", "w0", "p1", "r0", "r1", "r2", "s0", "s1", "main", "f1", "f2", "f3", "tf1", "tf2", "tf3", "v0", "n1", "cte0", "cte1", "o0", "o1", "tsurugi" };
    for (int i = 0; i < 40; ++i) { re.names.push_back("cte" + std::to_string(i)); re.names.push_back("z" + std::to_string(i)); }
    distinct(re.names);
    static std::set<std::string> const words(re.names.begin(), re.names.end());
    std::vector<tok> toks;
    for (auto& t : acat::tokens(x.sql)) {
        // single tokens of several words
        if (!toks.empty() && toks.back().text == "." && t == "*") { toks.back() = { ".*", tk::keyword }; continue; }
        if (!toks.empty() && toks.back().text == "OUTER" && t == "APPLY") { toks.back().text = "OUTER APPLY"; continue; }
        auto ch = static_cast<unsigned char>(t[0]);
        toks.push_back({ t, ch == '"' ? tk::raw : ch == '\'' ? tk::string_ : std::isdigit(ch) ? tk::number : std::isalpha(ch) || ch == '_' ? (words.count(lower(t)) ? tk::ident : tk::keyword) : tk::symbol });
    }
    // a few tokens are exchanged: errors are also invariant
    if (c.chance(1, 3)) for (int n = c.range(1, 2); n > 0; --n) {
        auto i = c.draw(static_cast<std::uint32_t>(toks.size())), j = c.draw(static_cast<std::uint32_t>(toks.size()));
        for (std::size_t k = 0; k < toks.size() && toks[i].kind != toks[j].kind; ++k) j = (j + 1) % toks.size();
        if (toks[i].kind != tk::symbol) toks[i] = toks[j];
    }
    check(c, ctx, s, toks, re);
}
} // namespace
int main(int argc, char** argv) {
    pbt::suite s { "A12", "the statement is accepted, or rejected for another reason than an unsupported feature, and is written in another way; statements are told apart by the text",
        {
            { "grammar", 100000, 3000000, grammar },
            { "queries", 40000, 1000000, queries },
        } };
    return pbt::run(s, argc, argv);
}
