// A01: the analysis of any statement ends with exactly one well-formed result, or diagnostics which say what and where;
// it depends on nothing but its input, and changes nothing of it.
#include "acat.h"
namespace {
using namespace acat;

using code = sql_analyzer_code;

void check(pbt::source& c, pbt::context& ctx, setting& s, std::string const& text) {
    auto o = s.fx.options();
    options(c, o);
    session ss { text };
    if (!ss.unit) { ctx.label("rejected by the parser"); return; }
    std::string tree = jv_text(jv_of(*ss.unit), true);
    mana::sql_analyzer shared;
    std::vector<std::string> first;
    auto n = ss.unit->statements().size();
    for (std::size_t i = 0; i < n; ++i) {
        auto& stmt = *ss.unit->statements()[i];
        auto r = shared(o, stmt, *ss.unit, s.holders, *s.host);
        using R = mana::sql_analyzer_result_kind;
        bool valid = r.kind() != R::diagnostics;
        ctx.require(r.is_valid() == valid && static_cast<bool>(r) == valid, "validity of the result", "");
        std::string fault;
        first.push_back(plan::text(r, &fault));
        ctx.require(fault.empty(), "malformed plan", [&] { return fault + "\n" + first.back(); });
        if (!valid) {
            auto&& ds = r.element<R::diagnostics>();
            ctx.require(!ds.empty(), "rejected without a reason", "");
            for (auto&& d : ds) {
                ctx.require(d.code() != code::unknown, "code of the diagnostic", first.back());
                ctx.require(!d.message().empty(), "message of the diagnostic", first.back());
                auto l = d.location();
                auto at = str(l);
                ctx.require(at.rfind("region(begin=", 0) == 0, "the diagnostic has no location", first.back());
                std::size_t b = 0, e = 0;
                std::sscanf(at.c_str(), "region(begin=%zu, end=%zu", &b, &e);
                ctx.require(b < e && b >= stmt.region().begin && e <= stmt.region().end, "the diagnostic is located out of the statement", first.back());
                ctx.label(str(d.code()));
            }
        } else ctx.label(r.kind() == R::statement ? str(r.element<R::statement>().kind()) : "plan");
        if (valid || !has_code(r, code::unsupported_feature)) ctx.nontrivial(text + std::to_string(i));
    }
    // in another order, by another analyzer
    for (auto i = n; i > 0; --i) {
        mana::sql_analyzer fresh;
        auto& a = c.flip() ? fresh : shared;
        auto again = plan::text(a(o, *ss.unit->statements()[i - 1], *ss.unit, s.holders, *s.host));
        ctx.require(again == first[i - 1], "the second analysis differs", first[i - 1] + "\n" + again);
    }
    ctx.require(jv_text(jv_of(*ss.unit), true) == tree, "the syntax tree has changed", "");
}
void grammar(pbt::source& c, pbt::context& ctx) {
    setting s; catalog(c, s);
    sqlgen::config conf;
    conf.names = names();
    conf.delimited = c.chance(1, 6); conf.contextual = false; conf.exotic = c.chance(1, 4);
    conf.depth = c.range(1, 4); conf.max_statements = 2;
    sqlgen::document d { c, conf, c.chance(1, 4) ? sqlgen::gap_style::random_docs : sqlgen::gap_style::plain };
    ctx.show(d.lay.text);
    check(c, ctx, s, d.lay.text);
}
// a valid query whose tokens are exchanged
void mutated(pbt::source& c, pbt::context& ctx) {
    setting s; qg::gen_options g;
    g.fold = true; g.allow_null = c.flip();
    qg::generator gen { c, s.fx, g };
    gen.budget = 25;
    gen.catalog();
    auto x = gen.query(nullptr, nullptr, c.range(1, 2), true);
    auto toks = acat::tokens(x.sql);
    // identifiers, literals and keywords are exchanged among themselves
    auto kind_of = [](std::string const& t) {
        auto ch = static_cast<unsigned char>(t[0]);
        if (ch == '"' || ch == '_') return 1;
        if (ch == '\'' || std::isdigit(ch)) return 2;
        if (!std::isalpha(ch)) return 3;
        for (unsigned char k : t) if (std::islower(k)) return 1;
        return 4;
    };
    int n = c.weighted({ 6, 2, 1 }) + 1;
    for (int k = 0; k < n && toks.size() > 2; ++k) {
        auto i = c.draw(static_cast<std::uint32_t>(toks.size())), j = c.draw(static_cast<std::uint32_t>(toks.size()));
        if (!c.chance(1, 6)) for (std::size_t t = 0; t < toks.size() && kind_of(toks[j]) > 2; ++t) j = (j + 1) % toks.size();
        switch (c.weighted({ 12, 1, 1, 1, 2 })) {
            case 0: for (std::size_t t = 0; t < toks.size(); ++t) { auto p = (i + t) % toks.size(); if (kind_of(toks[p]) == kind_of(toks[j]) && toks[p] != toks[j]) { toks[p] = toks[j]; break; } } break;
            case 1: std::swap(toks[i], toks[j]); break;
            case 2: toks.erase(toks.begin() + i); break;
            case 3: toks.insert(toks.begin() + i, toks[j]); break;
            default: {
                static std::vector<std::string> const p { "1", "'x'", "NULL", "DISTINCT", "*", "( SELECT 1 )", "COUNT(*)", "x", "1.5", "DEFAULT", "TRUE", "GROUP BY 1", "LATERAL", "AND", "- 1", "?", ":a" };
                toks[i] = c.pick(p);
            }
        }
    }
    std::string text;
    for (auto& t : toks) text += t + " ";
    ctx.show(text);
    check(c, ctx, s, text);
}
} // namespace
int main(int argc, char** argv) {
    pbt::suite s { "A01", "the statement is accepted, or rejected for another reason than an unsupported feature; statements are told apart by the text",
        {
            { "grammar", 70000, 3000000, grammar },
            { "mutated", 40000, 3000000, mutated },
        } };
    return pbt::run(s, argc, argv);
}
